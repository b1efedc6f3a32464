// Strings against std::string: editing (C04), search and comparison (C05).
#include "kv.h"
#include <string>
#include <vector>
#include "containers/string.h"
#include "containers/array.h"
typedef std::string S;

/// Exactly sized heap copy, so that ASan sees any read outside
struct CStr
{
	char * p; explicit CStr(const S & s) { p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); keep = s; }
	~CStr() { free(p); } S keep; operator const char *() const { return p; }
	void check() const { EXPECT(!::memcmp(p, keep.c_str(), keep.size() + 1), "argument-altered", "a source string was altered"); }
};
static S randStr(kv::Rng & R, int maxLen, int alphabet)
{
	S s; const int n = (int)R.size(maxLen);
	for (int i = 0; i < n; ++i) s += alphabet == 0 ? (char)('a' + R.below(2)) : alphabet == 1 ? "abAB"[R.below(4)] : alphabet == 2 ? (char)(32 + R.below(95)) : (char)(1 + R.below(255));
	return s;
}
static S esc(const S & s) { S o; char b[8]; for (unsigned char c : s.substr(0, 200)) { if (c < 32 || c > 126 || c == '"') { snprintf(b, 8, "\\x%02x", c); o += b; } else o += (char)c; } if (s.size() > 200) o += "..."; return o; }

static const int N = 3;
struct Edit
{
	kv::Rng & R; String * s[N]; S m[N]; int alpha; bool huge;
	explicit Edit(kv::Rng & r) : R(r) { for (auto & x : s) x = new String(); alpha = (int)R.below(4); huge = R.chance(1, 250); }
	~Edit() { for (auto & x : s) delete x; }
	void check(int k)
	{
		String & x = *s[k]; const String & c = x; const S & r = m[k];
		EXPECT(x.getLength() == r.size(), "length", "string %d has length %llu, expected %zu", k, (unsigned long long)x.getLength(), r.size());
		EXPECT(x.getSize() == r.size() && c.getLen() == r.size(), "length", "length aliases disagree");
		const char * p = *c; EXPECT(p == *x && p == c.getData() && p == x.getBuffer(), "buffer", "buffer accessors disagree");
		EXPECT(p && p[r.size()] == 0, "terminator", "string %d of %zu characters is not terminated", k, r.size());
		EXPECT(&c.getArray() == &x.getArray() && c.getArray().getCount() == r.size() + 1, "length", "underlying array holds %llu characters for length %zu", (unsigned long long)c.getArray().getCount(), r.size());
		if (::memcmp(p, r.data(), r.size())) kv::fail("content", "string %d is \"%s\", expected \"%s\"", k, esc(S(p, r.size())).c_str(), esc(r).c_str());
		kv::state(std::hash<S>()(r));
	}
	void set(int k, String * n, const S & r) { delete s[k]; s[k] = n; m[k] = r; }
	template<typename Num> void number(int k, Num v, const S & text)
	{
		if (R.chance(1, 2)) { kv::T("s%d += number %s", k, text.c_str()); COV("append-number"); String & ret = (*s[k] += v); m[k] += text; EXPECT(&ret == s[k], "return", "+= returns another object"); }
		else if (R.chance(1, 2)) { kv::T("s%d <<= number %s (was %zu long)", k, text.c_str(), m[k].size()); COV("print-number"); if (m[k].size() > text.size()) COV("print-number-shorter"); String & ret = (*s[k] <<= v); m[k] = text; EXPECT(&ret == s[k], "return", "<<= returns another object"); }
		else { const int j = (int)R.below(N); kv::T("s%d = s%d + number %s", j, k, text.c_str()); COV("plus-number"); const S r = m[k] + text; set(j, new String(*(const String *)s[k] + v), r); }
	}
	/// Texts of more than 65536 characters, and what is deep inside them
	void vast()
	{
		const int k = (int)R.below(N); String & x = *s[k]; S & r = m[k]; r.clear();
		const sizet len = 65537 + R.below(70000); kv::Rng C(R.next()); for (sizet i = 0; i < len; ++i) r += (char)('a' + C.below(26)); x = r.c_str();
		const sizet n = r.size(), p = R.chance(3, 4) ? 65536 + R.below(n - 65535) : R.below(n), l = R.chance(1, 2) ? R.below(n - p + 1) : R.below((n - p < 200 ? n - p : 200) + 1), q = R.below(n + 1);
		kv::T("s%d of %llu characters: %llu, %llu, %llu", k, (unsigned long long)n, (unsigned long long)p, (unsigned long long)l, (unsigned long long)q);
		switch (R.below(10))
		{
			case 0: COV("vast:own-tail"); x += (const char *)(*x + p); r += r.substr(p); break;
			case 1: COV("vast:own-char"); x += x[p]; r += char(r[p]); break;
			case 2: { COV("vast:splice"); const S t = randStr(R, 400, alpha); CStr c(t); x.splice(p, l, (const char *)c); r.replace(p, l, t); break; }
			case 3: { COV("vast:splice-own"); const S t = r.substr(p); x.splice(q, 0, (const char *)(*x + p)); r.insert(q, t); break; }
			case 4: { COV("vast:slice"); String sub = ((const String &)x).substr(l, p); const S e = r.substr(p, l); EXPECT(sub.getLength() == e.size() && !::memcmp(*sub, e.data(), e.size()), "content", "substr at %llu, %llu of %llu characters", (unsigned long long)p, (unsigned long long)l, (unsigned long long)n); break; }
			case 5: COV("vast:set"); x[p < n ? p : n - 1] = '#'; r[p < n ? p : n - 1] = '#'; break;
			case 6: { COV("vast:plus"); const S t = randStr(R, 90000, alpha); CStr c(t); String sum = (const String &)x + (const char *)c; const S e = r + t; EXPECT(sum.getLength() == e.size() && !::memcmp(*sum, e.data(), e.size() + 1), "content", "sum of %llu and %zu characters", (unsigned long long)n, t.size()); break; }
			case 7: COV("vast:own-text"); x = (const char *)(*x + p); r = r.substr(p); break;
			case 8: { COV("vast:twice"); x += *(const String *)&x; r += S(r); break; }
			case 9: { COV("vast:copy"); String copy(x); check(k); x += 'z'; r += 'z'; x = copy; r.pop_back(); break; }
		}
		check(k); x = "y"; r = "y"; check(k);
	}
	void step()
	{
		const int k = (int)R.below(N), j = (int)R.below(N); String & x = *s[k]; S & r = m[k]; const sizet n = r.size();
		const int maxLen = huge && R.chance(1, 4) ? 75000 : R.chance(1, 20) ? 700 : 40;
		switch (R.below(30))
		{
			case 0: { const S t = randStr(R, maxLen, alpha); kv::T("s%d = String(\"%s\")", k, esc(t).c_str()); COV("ctor-cstr"); CStr c(t); set(k, new String((const char *)c), t); c.check(); break; }
			case 1: { S t = randStr(R, maxLen, alpha); if (R.chance(1, 3) && t.size()) t[R.below(t.size())] = 0; kv::T("s%d = String(buffer of %zu)", k, t.size()); COV("ctor-buffer"); char * b = (char *)malloc(t.size()); memcpy(b, t.data(), t.size()); set(k, new String((const char *)b, (sizet)t.size()), t); free(b); break; }
			case 2: { const sizet c = huge ? R.size(70000) : R.size(60); const char f = (char)('a' + R.below(26)); kv::T("s%d = String(%llu, '%c')", k, (unsigned long long)c, f); COV("ctor-fill"); set(k, new String(c, f), S(c, f)); break; }
			case 3: { const sizet c = R.size(60); kv::T("s%d = String(capacity %llu)", k, (unsigned long long)c); COV("ctor-capacity"); set(k, new String(c), ""); break; }
			case 4: { kv::T("s%d = String()", k); COV("ctor-default"); set(k, new String(), ""); break; }
			case 5: case 6: { const S t = randStr(R, maxLen, alpha); kv::T("s%d += \"%s\"", k, esc(t).c_str()); COV("append-cstr"); CStr c(t); String & ret = (x += (const char *)c); r += t; c.check(); EXPECT(&ret == &x, "return", "+= returns another object"); break; }
			case 7: case 8: { kv::T("s%d += s%d (%zu, %zu)", k, j, n, m[j].size()); if (j == k) COV("append-self"); else COV("append-string"); x += *(const String *)s[j]; r += S(m[j]); break; }
			case 9: { kv::T("s%d += own tail", k); COV("append-own-tail"); const sizet p = R.below(n + 1); if (r.find('\0') == S::npos) { x += (const char *)(*x + p); r += r.substr(p); } break; }
			case 10: if (n && R.chance(1, 3)) { const int reps = 1 + (int)R.size(20); kv::T("s%d += %d own characters", k, reps); COV("append-own-char"); for (int i = 0; i < reps; ++i) { const sizet p = R.below(r.size()); if (R.chance(1, 2)) x += x[p]; else x += (*(const String &)x)[p]; r += char(r[p]); } break; } else { const char c = alpha == 3 ? (char)(1 + R.below(255)) : (char)('a' + R.below(26)); kv::T("s%d += '%c'", k, c); COV("append-char"); const int reps = 1 + (int)R.size(20); for (int i = 0; i < reps; ++i) { x += c; r += c; } break; }
			case 11:
			{
				// Numbers of each kind, at the limits too
				const kv::u64 v = R.chance(1, 4) ? R.below(12) : R.next() >> R.below(64); char b[512];
				switch (R.below(6))
				{
					case 0: { const int32 q = R.chance(1, 8) ? INT32_MIN : (int32)v; number<int32>(k, q, std::to_string(q)); break; }
					case 1: { const int64 q = R.chance(1, 8) ? INT64_MIN : (int64)v; number<int64>(k, q, std::to_string(q)); break; }
					case 2: { number<uint32>(k, (uint32)v, std::to_string((uint32)v)); break; }
					case 3: { number<uint64>(k, v, std::to_string((unsigned long long)v)); break; }
					case 4: { const float32 q = R.chance(1, 6) ? 3.0e38f : (float32)((R.unit() - 0.5) * (double)(1ull << R.below(40))); snprintf(b, 512, "%f", q); number<float32>(k, q, b); break; }
					default: { const float64 q = R.chance(1, 6) ? -1.7e308 : (R.unit() - 0.5) * (double)(1ull << R.below(60)); snprintf(b, 512, "%f", q); number<float64>(k, q, b); break; }
				}
				break;
			}
			case 12: case 13:
			{
				const sizet len = R.chance(1, 4) ? 1000 + R.below(50) : R.chance(1, 8) ? R.below(6000) : R.below(60); const S t(len, (char)('a' + R.below(26))); const int num = (int)R.below(100000);
				kv::T("s%d = format(\"%%s<%%d>\", %llu chars, %d)", k, (unsigned long long)len, num); if (len > 1023) COV("format-long"); else COV("format-short");
				CStr c(t); String f = String::format("%s<%d>", (const char *)c, num); set(k, new String(f), t + "<" + std::to_string(num) + ">"); c.check();
				break;
			}
			case 14: case 15: { const sizet p = R.below(n + 1), l = R.below(n - p + 1); kv::T("s%d = s%d.substr(%llu, %llu)", j, k, (unsigned long long)l, (unsigned long long)p); COV("substr"); const S e = r.substr(p, l); if (p == 0 && R.chance(1, 2)) set(j, new String(x.substr(l)), e); else set(j, new String(((const String &)x).substr(l, p)), e); break; }
			case 16: case 17: case 18:
			{
				const sizet p = R.below(n + 1), l = R.below(n - p + 1); const S t = randStr(R, maxLen, alpha); kv::T("s%d.splice(%llu, %llu, \"%s\") of %zu", k, (unsigned long long)p, (unsigned long long)l, esc(t).c_str(), n);
				if (t.size() > l) COV("splice-longer"); else if (t.size() < l) COV("splice-shorter"); else COV("splice-equal");
				CStr c(t); const int how = (int)R.below(2); if (how) { String & ret = x.splice(p, l, (const char *)c); EXPECT(&ret == &x, "return", "splice returns another object"); } else { const String q((const char *)c); x.splice(p, l, q); EXPECT(q == (const char *)c, "argument-altered", "splice altered its argument"); }
				r.replace(p, l, t); c.check(); break;
			}
			case 19: { const sizet p = R.below(n + 1), l = R.below(n - p + 1); kv::T("s%d.splice(%llu, %llu)", k, (unsigned long long)p, (unsigned long long)l); COV("splice-erase"); x.splice(p, l); r.erase(p, l); break; }
			case 20: if (n && R.chance(1, 2) && r.find('\0') == S::npos) { const sizet p = R.below(n + 1), l = R.below(n - p + 1), q = R.below(n + 1); kv::T("s%d.splice(%llu, %llu, own tail from %llu) of %zu", k, (unsigned long long)p, (unsigned long long)l, (unsigned long long)q, n); COV(n - q > l ? "splice-own-tail-longer" : "splice-own-tail"); const S t = r.substr(q); x.splice(p, l, (const char *)(*x + q)); r.replace(p, l, t); break; } else { const sizet p = R.below(n + 1), l = R.below(n - p + 1); kv::T("s%d.splice(%llu, %llu, s%d)", k, (unsigned long long)p, (unsigned long long)l, j); if (j == k) COV("splice-self"); const S t = m[j]; x.splice(p, l, *(const String *)s[j]); r.replace(p, l, t); break; }
			case 21: { kv::T("s%d = s%d.toLower()", j, k); COV("lower"); S e = r; for (auto & c : e) if (c >= 'A' && c <= 'Z') c += 32; String * q = new String(((const String &)x).toLower()); check(k); set(j, q, e); break; }
			case 22: { kv::T("s%d = s%d.toUpper()", j, k); COV("upper"); S e = r; for (auto & c : e) if (c >= 'a' && c <= 'z') c -= 32; String * q = new String(((const String &)x).toUpper()); check(k); set(j, q, e); break; }
			case 23: { kv::T("s%d = s%d (assignment)", k, j); COV("copy-assign"); String & ret = (x = *(const String *)s[j]); EXPECT(&ret == &x, "return", "assignment returns another object"); r = S(m[j]); break; }
			case 24: { kv::T("s%d = copy of s%d", k, j); COV("copy-construct"); String * q = new String(*(const String *)s[j]); const S e = m[j]; set(k, q, e); break; }
			case 25:
			{
				// The source of a move stays valid and reusable
				if (k == j) break; kv::T("s%d = move(s%d)", k, j); COV("move"); const S e = m[j];
				if (R.chance(1, 2)) x = ::move(*s[j]); else { String * q = new String(::move(*s[j])); delete s[k]; s[k] = q; }
				m[k] = e; String & src = *s[j]; EXPECT(src.getLength() == strlen(*src) || src.getLength() == e.size(), "moved-from", "a moved-from string is not valid"); const S t = randStr(R, 20, alpha); CStr c(t); src = String((const char *)c); m[j] = t; break;
			}
			case 26: if (n) { const sizet i = R.below(n); const char c = (char)('a' + R.below(26)); kv::T("s%d[%llu] = '%c'", k, (unsigned long long)i, c); COV("write"); if (R.chance(1, 2)) x[i] = c; else x.getAt(i) = c; r[i] = c; EXPECT(((const String &)x)[i] == c && ((const String &)x).getAt(i) == c, "content", "character accessors disagree"); } break;
			case 27: { const S t = randStr(R, maxLen, alpha); kv::T("s%d = s%d + \"%s\" + 'x' + s%d", j, k, esc(t).c_str(), k); COV("plus"); CStr c(t); const S e = r + t + "x" + r; set(j, new String(((const String &)x) + (const char *)c + 'x' + *(const String *)s[k]), e); break; }
			case 28: if (R.chance(1, 3) && r.find('\0') == S::npos) { const sizet q = R.below(n + 1); const int num = (int)R.below(1000); kv::T("s%d of its own text", k); const S e = r.substr(q); switch (R.below(4)) { case 0: COV("own-text:assign"); x = (const char *)(*x + q); r = e; break; case 1: COV("own-text:format"); x = String::format("%s|%d|%s", (const char *)(*x + q), num, *x); r = e + "|" + std::to_string(num) + "|" + r; break; case 2: COV("own-text:plus"); x = x + x + (const char *)(*x + q); r = r + r + e; break; default: COV("own-text:substr"); x = x.substr(n - q, q); r = e; break; } break; } else { const S t = randStr(R, maxLen, alpha); kv::T("s%d = \"%s\" (assign)", k, esc(t).c_str()); COV("assign-cstr"); CStr c(t); x = (const char *)c; r = t; c.check(); break; }
			default:
			{
				// An object with toString() formats like its text
				struct Obj { const String * t; String toString() const { return *t; } } o{s[j]}; kv::T("s%d with object of text s%d", k, j); COV("object"); const S e = m[j];
				if (j == k) break; if (R.chance(1, 2)) { x += o; r += e; } else { x <<= o; r = e; } break;
			}
		}
		if (m[k].size() > 20) kv::nontrivial();
		for (int i = 0; i < N; ++i) { if (m[i].size() > 65536) COV("length:huge"); if (m[i].size() > (huge ? 400000 : 9000)) { m[i] = "x"; *s[i] = "x"; } check(i); }
	}
};
static void edit(kv::Rng & R)
{
	Edit e(R); const int steps = 10 + (int)R.below(kv::G.thorough ? 150 : 50);
	kv::T("strings, alphabet %d", e.alpha);
	for (int i = 0; i < steps; ++i) e.step();
	if (R.chance(1, 120)) { e.vast(); e.vast(); }
}

static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int sgn(long v) { return (v > 0) - (v < 0); }
/// Sign of the first differing pair, zero if equal
static int refCmp(const S & a, const S & b, bool ci)
{
	for (size_t i = 0;; ++i)
	{
		const char x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0;
		if (ci ? low(x) != low(y) : x != y) return sgn((int)x - (int)y);
		if (i >= a.size()) return 0;
	}
}
static void search(kv::Rng & R)
{
	const int alpha = (int)R.below(4); const bool longText = R.chance(1, 12); S t = randStr(R, longText ? 3000 : kv::G.thorough ? 400 : 80, alpha); if (t.size() > 1000) COV("text:long"); CStr ct(t); const String s((const char *)ct);
	S p = R.chance(1, 3) && t.size() ? t.substr(R.below(t.size()), 1 + R.below(longText ? 700 : 4)) : randStr(R, R.chance(1, 4) ? 100 : 3, alpha); CStr cp(p); const String ps((const char *)cp);
	kv::T("text \"%s\" pattern \"%s\"", esc(t).c_str(), esc(p).c_str());
	if (t.size() > 1 && p.size()) kv::nontrivial();
	auto find = [&](const S & q, size_t from) -> int64 { if (from > t.size()) return -1; size_t r = t.find(q, from); return r == S::npos ? -1 : (int64)r; };
	// Finding
	for (int i = 0; i < 4; ++i)
	{
		const sizet from = i == 0 ? 0 : R.chance(1, 4) ? t.size() + R.below(4) : R.below(t.size() + 1); const int64 e = find(p, from);
		if (e >= 0) COV("found"); else COV("not-found"); if (from > t.size()) COV("start-beyond"); if (p.size() > t.size()) COV("pattern-longer"); if (p.empty()) COV("empty-pattern"); if (t.empty()) COV("empty-text");
		int64 g = s.findIndex(ps, from); EXPECT(g == e, "find-string", "findIndex(string, %llu) gives %lld, expected %lld", (unsigned long long)from, (long long)g, (long long)e);
		g = s.findIndex((const char *)cp, from); EXPECT(g == e, "find-cstr", "findIndex(c string, %llu) gives %lld, expected %lld", (unsigned long long)from, (long long)g, (long long)e);
		if (p.size()) { const sizet l = 1 + R.below(p.size()); g = s.findIndex((const char *)cp, from, l); const int64 e2 = find(p.substr(0, l), from); EXPECT(g == e2, "find-prefix", "findIndex(c string, %llu, %llu) gives %lld, expected %lld", (unsigned long long)from, (unsigned long long)l, (long long)g, (long long)e2); }
		const char c = p.size() ? p[0] : 'a'; g = s.findIndex(c, from); const int64 e3 = find(S(1, c), from); EXPECT(g == e3, "find-char", "findIndex('%c', %llu) gives %lld, expected %lld", c, (unsigned long long)from, (long long)g, (long long)e3);
		if (from == 0) { g = s.findIndex(ps); EXPECT(g == e, "find-string", "findIndex(string) gives %lld", (long long)g); g = s.findIndex((const char *)cp); EXPECT(g == e, "find-cstr", "findIndex(c string) gives %lld", (long long)g); }
	}
	// All occurrences, overlapping
	{
		std::vector<size_t> e; for (int64 q = 0; (q = find(p, q)) != -1; ++q) e.push_back(q); if (e.size() > 1) COV("many-occurrences");
		Array<sizet> g = R.chance(1, 2) ? s.findAll(ps) : s.findAll((const char *)cp);
		EXPECT(g.getCount() == e.size(), "find-all", "findAll gives %llu occurrences, expected %zu", (unsigned long long)g.getCount(), e.size());
		for (size_t i = 0; i < e.size(); ++i) EXPECT(g[i] == e[i], "find-all", "occurrence %zu at %llu, expected %zu", i, (unsigned long long)g[i], e[i]);
		const char c = p.size() ? p[0] : 'b'; Array<sizet> gc = s.findAll(c); size_t k = 0; for (size_t i = 0; i < t.size(); ++i) if (t[i] == c) { EXPECT(k < gc.getCount() && gc[k] == i, "find-all", "findAll('%c') misses %zu", c, i); ++k; } EXPECT(k == gc.getCount(), "find-all", "findAll('%c') gives %llu, expected %zu", c, (unsigned long long)gc.getCount(), k);
	}
	// Replacement, left to right without rescanning
	{
		const S w = R.chance(1, 3) ? p + randStr(R, 3, alpha) + p : randStr(R, R.chance(1, 10) ? 60 : 5, alpha); CStr cw(w); const String ws((const char *)cw);
		S e = t; if (p.size()) for (size_t q = 0; (q = e.find(p, q)) != S::npos; q += w.size()) e.replace(q, p.size(), w);
		String x = s; String & ret = R.chance(1, 2) ? x.replaceAll(ps, ws) : x.replaceAll((const char *)cp, (const char *)cw); COV("replace"); kv::T("replacement \"%s\"", esc(w).c_str());
		EXPECT(&ret == &x, "return", "replaceAll returns another object");
		EXPECT(x.getLength() == e.size() && !::memcmp(*x, e.c_str(), e.size() + 1), "replace", "replaceAll gives \"%s\", expected \"%s\"", esc(S(*x, x.getLength())).c_str(), esc(e).c_str());
		EXPECT(!strcmp(*ps, p.c_str()) && !strcmp(*ws, w.c_str()), "argument-altered", "replaceAll altered its arguments");
		if (R.chance(1, 4) && p.size()) { String y = s; S ey = t; size_t q = 0; while ((q = ey.find(p, q)) != S::npos) { ey.replace(q, p.size(), t); q += t.size(); if (ey.size() > 20000) break; } if (ey.size() <= 20000) { COV("replace-by-self"); y.replaceAll(ps, y); EXPECT(y.getLength() == ey.size() && !strcmp(*y, ey.c_str()), "replace", "replaceAll by itself gives \"%s\", expected \"%s\"", esc(*y).c_str(), esc(ey).c_str()); } }
	}
	EXPECT(s.getLength() == t.size() && !strcmp(*s, t.c_str()), "argument-altered", "a search altered the text"); ct.check(); cp.check();
}
static void compare(kv::Rng & R)
{
	const int alpha = (int)R.below(4); const int maxLen = R.chance(1, 600) ? 140000 : R.chance(1, 12) ? 2000 : 60; S a = randStr(R, maxLen, alpha), b; if (a.size() > 65536) COV("compare:huge"); else if (a.size() > 256) COV("compare:long");
	switch (R.below(6))
	{
		case 0: b = randStr(R, maxLen, alpha); break;
		case 1: b = a; break;
		case 2: b = a.substr(0, R.below(a.size() + 1)); break;
		case 3: b = a + randStr(R, 3, alpha); break;
		case 4: b = a; for (auto & c : b) if (R.chance(1, 2)) c = low(c) == c && c >= 'a' && c <= 'z' ? c - 32 : low(c); break;
		default: b = a; if (b.size()) b[R.below(b.size())] ^= (char)(R.chance(1, 2) ? 32 : 1 + R.below(127)); for (auto & c : b) if (!c) c = 1; break;
	}
	CStr ca(a), cb(b); const String x((const char *)ca), y((const char *)cb);
	kv::T("compare \"%s\" \"%s\"", esc(a).c_str(), esc(b).c_str()); if (a.size() + b.size() > 2) kv::nontrivial();
	const int e = refCmp(a, b, false), ei = refCmp(a, b, true); if (!e) COV("cmp-equal"); else COV("cmp-different"); if (e && !ei) COV("icmp-equal");
	EXPECT(sgn(x.cmp(y)) == e && sgn(x.cmp((const char *)cb)) == e && sgn(PlatformStrings::cmp(ca, cb)) == e, "cmp", "cmp gives %d, expected sign %d", (int)x.cmp(y), e);
	EXPECT(sgn(y.cmp(x)) == -e, "cmp", "cmp is not antisymmetric");
	EXPECT(sgn(x.icmp(y)) == ei && sgn(x.icmp((const char *)cb)) == ei && sgn(PlatformStrings::icmp(ca, cb)) == ei, "icmp", "icmp gives %d, expected sign %d", (int)x.icmp(y), ei);
	EXPECT((x == y) == (e == 0) && (x != y) == (e != 0) && (x == (const char *)cb) == (e == 0) && (x != (const char *)cb) == (e != 0), "relational", "(in)equality disagrees with cmp");
	EXPECT((x < y) == (e < 0) && (x > y) == (e > 0) && (x <= y) == (e <= 0) && (x >= y) == (e >= 0), "relational", "ordering disagrees with cmp");
	EXPECT((x < (const char *)cb) == (e < 0) && (x > (const char *)cb) == (e > 0) && (x <= (const char *)cb) == (e <= 0) && (x >= (const char *)cb) == (e >= 0), "relational", "ordering against a C string disagrees with cmp");
	EXPECT(PlatformStrings::getLength(ca) == a.size(), "length", "getLength");
	// Sub-ranges inside both strings
	const size_t m = a.size() < b.size() ? a.size() : b.size();
	for (int i = 0; i < 4; ++i)
	{
		const size_t st = R.below(m + 1), ln = R.below(m - st + 1); const int en = refCmp(a.substr(st, ln), b.substr(st, ln), false), eni = refCmp(a.substr(st, ln), b.substr(st, ln), true); COV("cmpn");
		EXPECT(sgn(PlatformStrings::cmpn(ca, cb, ln, st)) == en, "cmpn", "cmpn(%zu, %zu) gives %d, expected sign %d", ln, st, (int)PlatformStrings::cmpn(ca, cb, ln, st), en);
		EXPECT(sgn(PlatformStrings::icmpn(ca, cb, ln, st)) == eni, "icmpn", "icmpn(%zu, %zu) gives %d, expected sign %d", ln, st, (int)PlatformStrings::icmpn(ca, cb, ln, st), eni);
		if (st == 0) EXPECT(sgn(PlatformStrings::cmpn(ca, cb, ln)) == en && sgn(PlatformStrings::icmpn(ca, cb, ln)) == eni, "cmpn", "cmpn without start");
	}
	ca.check(); cb.check();
}
KV_MAIN({"edit", edit, true}, {"search", search, true}, {"compare", compare, true})
