// C18 language of expressions and automata, C19 safety of compiling and matching
#include "rx.h"
#include "regex/regex.h"
#include <malloc.h>
#include <type_traits>
using rx::P;

/// Input text in a block of exactly its own size
struct Exact { char * p; explicit Exact(const std::string & s) : p((char *)malloc(s.size() + 1)) { memcpy(p, s.c_str(), s.size() + 1); } ~Exact() { free(p); } };
static std::string show(const std::string & s) { std::string o; for (unsigned char c : s) { if (c >= 32 && c < 127) o += (char)c; else { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } } return o; }

static std::string input(const rx::Node & n, const std::string & alphabet, kv::Rng & R, size_t limit = 60)
{
	std::string s; const kv::u64 r = R.below(8);
	if (r < 4 || (limit > 60 && r < 7)) rx::member(n, R, s, limit); else { const int k = (int)R.below(R.chance(1, 4) ? 30 : 7); for (int i = 0; i < k; ++i) s += alphabet[R.below(alphabet.size())]; }
	if (r >= 3 && R.chance(1, 2)) { const int k = 1 + (int)R.below(2); for (int i = 0; i < k; ++i) { const size_t at = R.below(s.size() + 1); const char c = R.chance(3, 4) ? alphabet[R.below(alphabet.size())] : (char)R.range(1, 255); switch (R.below(4)) { case 0: s.insert(at, 1, c); break; case 1: if (at < s.size()) s.erase(at, 1); break; case 2: if (at < s.size()) s[at] = c; break; default: s += s.substr(at); } } }
	if (s.size() > limit) s.resize(R.below(limit + 1)); return s;
}
static const char * const alphabets[] = { "ab", "abc", "ab0 ", "aZ_9-. ", "x\xe9\x80 b", "]^-\\[a", "ab(){}*+?|$", "0123456789", "a\t\n\v\fb\r ", "_aZ0/:" };
static const char * const patterns[] = {
	"https?://\\w+(\\.\\w+)+[/\\w+]*", "Hello, world!", "[abc]+", "https?://\\w+(\\.\\w+)+", "\\b([0-9]|[1-9][0-9]|1[0-9][0-9]|2[0-4][0-9]|25[0-5])\\b",
	"\\b[A-Za-z0-9._%+-]+@[A-Za-z0-9.-]+\\.[A-Za-z][A-Za-z]+\\b", "\\b(25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9]?)\\.(25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9]?)\\.(25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9]?)\\.(25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9]?)\\b",
	"(abc){3}(def){2,4}(abc){2,}", "^(\\+|-)?\\d+(\\.\\d*)?([eE](\\+|-)?\\d+)?$", "[A-Za-z_]\\w*", "\"([^\"\\\\]|\\\\.)*\"", "\\d{4}-\\d{2}-\\d{2}([T ]\\d{2}:\\d{2}(:\\d{2})?)?", "(0|1(01*0)*1)+", "(a|b)*a(a|b){3}",
	"((a*b*)*c?){2,3}", "#[0-9a-fA-F]{3}([0-9a-fA-F]{3})?", "\\s*\\w+\\s*=\\s*[^\\s;]+\\s*;?", "<(\\w+)(\\s+\\w+=('[^']*'|\"[^\"]*\"))*/?>", "(\\w+, )*\\w+", "x{0}y{0,0}z{0,}", "(a?){5}a{5}", "(a|aa)+", "([^a]b)*", "(\\(\\d{3}\\) )?\\d{3}-\\d{4}", ".*\\.(cpp|h|txt)$", "^$", "", "()", "(|a)(b|)", "(a{2}){2}{2}", "[\\]\\\\-]+", "[\\[-\\]]+", "[^\\d\\s]+", "((((((a))))))+" };

static void answers(const Re::Regex & re, const rx::Node & n, const std::string & pattern, const std::string & alphabet, kv::Rng & R, int many, size_t limit = 60)
{
	std::vector<std::string> ins; std::vector<bool> want; int yes = 0;
	for (int i = 0; i < many; ++i) { ins.push_back(input(n, alphabet, R, limit)); want.push_back(rx::accepts(n, ins.back())); yes += want.back(); }
	for (int pass = 0; pass < 2; ++pass) for (int k = 0; k < many; ++k)
	{
		const int i = pass ? (int)R.below(many) : k; Exact e(ins[i]); const bool got = (k & 1) ? re.accept(e.p) : re.accept(String{e.p});
		EXPECT(got == want[i], pass ? "repeated" : "language", "/%s/ %s \"%s\"%s", show(pattern).c_str(), got ? "accepts" : "rejects", show(ins[i]).c_str(), pass ? " when asked again" : "");
	}
	COVN("input:accepted", yes); COVN("input:rejected", many - yes); if (yes && yes < many) kv::nontrivial();
}
/// A brace that opens no quantifier stands for itself: drops the escape of some that are followed by what no quantifier begins with
static void loosen(std::string & p, kv::Rng & R)
{
	for (size_t i = 0; i + 1 < p.size(); ++i) if (p[i] == '\\')
	{
		if (p[i + 1] == '{') { size_t j = i + 2; while (j < p.size() && isdigit((unsigned char)p[j])) ++j; if (j < p.size() && p[j] == ',') { ++j; while (j < p.size() && isdigit((unsigned char)p[j])) ++j; } if ((j < p.size() ? isalpha((unsigned char)p[j]) || p[j] == '{' || p[j] == ' ' : true) && R.chance(1, 2)) { p.erase(i, 1); COV("literal-brace"); continue; } }
		++i;
	}
}
/// Where copies of what owns states are allowed, they are objects of their own
template<typename A, typename F> static void copied(const A & a, F ask)
{
	if constexpr (std::is_copy_constructible<A>::value) { A * b = new A(a); A * c = new A(*b); ask(*b); delete b; ask(*c); delete c; COV("copied"); }
	if constexpr (std::is_copy_assignable<A>::value && std::is_default_constructible<A>::value) { A b; b = a; ask(b); COV("copied"); }
}
static void language(kv::Rng & R)
{
	const std::string alphabet = alphabets[R.below(sizeof(alphabets) / sizeof(*alphabets))]; rx::Gen g{R, alphabet, (int)R.range(2, 14)};
	P n = g.alt((int)R.below(5)); std::string pattern; rx::print(*n, R, pattern); if (rx::weight(*n) > 600) return; if (R.chance(1, 2)) loosen(pattern, R);
	kv::T("/%s/", show(pattern).c_str()); kv::state(kv::mix(std::hash<std::string>()(pattern)));
	String ps{pattern.c_str(), pattern.size()}; { Re::Regex re{ps}; answers(re, *n, pattern, alphabet, R, 12); if (R.chance(1, 8)) { const std::string s = input(*n, alphabet, R); const bool want = rx::accepts(*n, s); copied(re, [&](const Re::Regex & c) { EXPECT(c.accept(s.c_str()) == want, "copy", "a copy of /%s/ and \"%s\"", show(pattern).c_str(), show(s).c_str()); }); } if (R.chance(1, 4)) { const std::string s = input(*n, alphabet, R); EXPECT(Re::accept(ps, s.c_str()) == rx::accepts(*n, s), "free", "Re::accept of /%s/ and \"%s\"", show(pattern).c_str(), show(s).c_str()); COV("free-function");
		// asked again and again, with patterns that are nearly the same
		for (int k = 0; k < 3; ++k)
		{
			P n2 = rx::copy(*n); if (k != 1 && !rx::nudge(*n2, R)) break; std::string p2; rx::print(*n2, R, p2); const std::string s2 = R.chance(1, 2) ? s : input(*n2, alphabet, R); kv::T("/%s/ \"%s\"", show(p2).c_str(), show(s2).c_str());
			EXPECT(Re::accept(String{p2.c_str(), p2.size()}, s2.c_str()) == rx::accepts(*n2, s2), "free", "Re::accept of /%s/ after /%s/, and \"%s\"", show(p2).c_str(), show(pattern).c_str(), show(s2).c_str()); COV("free-function:similar");
		}
	} }
}
/// Many repetitions of what may be empty take quadratic time to walk: not what is checked here
static bool heavy(const rx::Node & n) { if (n.k == rx::Quant && (n.min > 30 || n.max > 30) && rx::accepts(*n.kids[0], "")) return true; for (const P & k : n.kids) if (heavy(*k)) return true; return false; }
/// Repetition counts of two and three digits, many states, long inputs
static void large(kv::Rng & R)
{
	const std::string alphabet = alphabets[R.below(4)]; rx::Gen g{R, alphabet, (int)R.range(1, R.chance(1, 2) ? 4 : 60)}; g.counts = R.chance(1, 2) ? 40 : 150; g.most = 1500; P n;
	if (R.chance(1, 2)) n = g.alt((int)R.below(9));
	else { n = rx::make(rx::Cat); n->kids.push_back(g.quantified(0)); P q = rx::make(rx::Quant); P a = g.atom(1); if (a->k == rx::Begin || a->k == rx::End || a->k == rx::Boundary || a->k == rx::NoBoundary) { a = rx::make(rx::Lit); a->c = g.letter(); } q->kids.push_back(a); q->min = (int)R.below(g.counts); q->max = R.chance(1, 4) ? q->min : R.chance(1, 4) ? -1 : q->min + (int)R.below(g.counts); if (!q->max) q->max = q->min = 11; n->kids.push_back(q); n->kids.push_back(g.quantified(1)); COV("quantifier:many"); }
	std::string pattern; rx::print(*n, R, pattern); if (rx::weight(*n) > 3000 || heavy(*n)) { COV("skipped:quadratic"); return; }
	kv::T("/%s/", show(pattern).c_str()); kv::state(kv::mix(std::hash<std::string>()(pattern))); Re::Regex re{String{pattern.c_str(), pattern.size()}}; answers(re, *n, pattern, alphabet, R, 6, rx::LONG - 1);
}
/// Small patterns against all inputs up to a length
static void exhaustive(kv::Rng & R)
{
	const std::string alphabet = R.chance(1, 3) ? "ab " : "ab"; rx::Gen g{R, alphabet, (int)R.range(1, 7)}; P n = g.alt((int)R.below(4)); std::string pattern; rx::print(*n, R, pattern); if (rx::weight(*n) > 120) return;
	kv::T("/%s/ all", show(pattern).c_str()); kv::state(kv::mix(std::hash<std::string>()(pattern))); Re::Regex re{String{pattern.c_str(), pattern.size()}}; const int max = alphabet.size() == 2 ? 6 : 4; int yes = 0;
	for (int len = 0; len <= max; ++len) { int total = 1; for (int i = 0; i < len; ++i) total *= (int)alphabet.size(); for (int k = 0; k < total; ++k) { std::string s; for (int i = 0, q = k; i < len; ++i, q /= (int)alphabet.size()) s += alphabet[q % alphabet.size()]; const bool want = rx::accepts(*n, s); Exact e(s); EXPECT(re.accept(e.p) == want, "language", "/%s/ %s \"%s\"", show(pattern).c_str(), want ? "rejects" : "accepts", s.c_str()); yes += want; } }
	COVN("input:accepted", yes); if (yes) kv::nontrivial();
}
static void realistic(kv::Rng & R)
{
	const std::string pattern = patterns[R.below(sizeof(patterns) / sizeof(*patterns))]; rx::Parser ps{pattern}; P n = ps.alt(); if (ps.i != pattern.size()) kv::fail("harness-parser", "stopped at %zu of /%s/", ps.i, pattern.c_str());
	kv::T("/%s/", pattern.c_str()); Re::Regex re{String{pattern.c_str()}}; answers(re, *n, pattern, "ab01 .-/:xA\"'@()", R, 24);
}

/// Automata assembled with the builder, with lookaheads, optimized or not; executors stepped, reset and rebound
template<typename A> struct Of;
template<> struct Of<char> { static char in(int c) { return (char)c; } static unsigned char out(char c) { return (unsigned char)c; } };
/// An alphabet of wide symbols: those of char, far apart, in the same order
typedef long long Wide;
namespace Re { template<> struct AlphabetTraits<Wide> { using SymbolT = Wide; using StringT = const Wide *; static constexpr Wide terminalSymbol = 0; static StringT consumeInput(const StringT & s, int32 n) { return s + n; } static bool isEOF(const StringT & s) { return *s == 0; } }; }
template<> struct Of<Wide> { static Wide in(int c) { return (Wide)(unsigned char)c << 32; } static unsigned char out(Wide c) { return (unsigned char)(c >> 32); } };
template<typename A> static void assemble(Re::AutomatonBuilder<A> & b, const rx::Node & n)
{
	using namespace rx; typedef const A * S; typedef Of<A> O;
	switch (n.k)
	{
		case rx::Lit: b.template pushState<Re::StateSymbol<A>>(O::in((char)n.c)); break;
		case rx::Any: b.template pushState<Re::StateAny<A>>(); break;
		case rx::Set:
		{
			int lo = 1, hi = 127; while (lo < 128 && !n.in[lo]) ++lo; while (hi > lo && !n.in[hi]) --hi; bool one = lo < 128; for (int c = 1; c < 256; ++c) one &= n.in[c] == (c >= lo && c <= hi);
			if (one) { b.template pushState<Re::StateRange<A>>(O::in(lo), O::in(hi)); COV("state:range"); break; }
			const rx::Node * q = &n; bool in[256]; memcpy(in, q->in, 256); b.template pushState<Re::StateLambda<A>>([in](S s, int32 & num, int32) -> bool { return num = in[O::out(*s)]; }, "Set"); break;
		}
		case rx::Begin: b.template pushState<Re::StateLambda<A>>([](S, int32 & num, int32 read) -> bool { num = 0; return read == 0; }, "Begin"); break;
		case rx::End: b.template pushState<Re::StateLambda<A>>([](S s, int32 & num, int32) -> bool { num = 0; return !*s; }, "End"); break;
		case rx::Boundary: b.template pushState<Re::StateLambda<A>>([](S s, int32 & num, int32 read) -> bool { num = 0; return (read > 0 && rx::word(O::out(s[-1]))) != rx::word(O::out(*s)); }, "Boundary"); break;
		case rx::NoBoundary: b.template pushState<Re::StateLambda<A>>([](S s, int32 & num, int32 read) -> bool { num = 0; return read > 0 && rx::word(O::out(s[-1])) && rx::word(O::out(*s)); }, "NoBoundary"); break;
		case rx::Cat: for (const P & k : n.kids) assemble(b, *k); break;
		case rx::Alt: for (size_t i = 0; i < n.kids.size(); ++i) { if (i) b.pushBranch(); assemble(b, *n.kids[i]); } break;
		case rx::Group: b.beginGroup(); assemble(b, *n.kids[0]); b.endGroup(); break;
		case rx::Look: b.template beginMacro<Re::StatePositiveLookahed<A>>(); assemble(b, *n.kids[0]); b.endMacro(); break;
		case rx::NotLook: b.template beginMacro<Re::StateNegativeLookahed<A>>(); assemble(b, *n.kids[0]); b.endMacro(); break;
		default: assemble(b, *n.kids[0]); if (n.text == "?") b.pushSkip(); else if (n.text == "+") b.pushJump(); else if (n.text == "*") { b.pushSkip(); b.pushJump(); } else b.pushRepeat(n.min, n.max); break;
	}
}
/// What an executor tells about itself goes with the input it stands in
template<typename A> static bool runs(Re::Executor<A> & x, const A * in, size_t length)
{
	bool ok = false, over = false; const Re::Executor<A> & c = x; kv::u64 steps = 0; EXPECT(x.getNumRead() == 0 && c.getCurrentInput() == in && !x.isAcceptedState(), "executor", "does not begin where the input does");
	do
	{
		over = x.step(ok); const int read = c.getNumRead(); ++steps;
		EXPECT(read >= 0 && (size_t)read <= length && c.getCurrentInput() == in + read && x.getCurrentInput() == in + read, "executor", "tells that %d of %zu symbols are read, and stands %zd behind the first", read, length, (ssize_t)(c.getCurrentInput() - in));
		EXPECT(c.getCurrentState() && x.getCurrentState() == c.getCurrentState() && x.isAcceptedState(c.getCurrentState()) == x.isAcceptedState(), "executor", "is not in the state it tells");
		EXPECT(!ok || over, "executor", "accepts and goes on"); EXPECT(!ok || (x.isAcceptedState() && (size_t)read == length), "executor", "accepts after %d of %zu symbols", read, length);
	} while (!over);
	COVN("executor:steps", steps); return ok;
}
/// What an automaton tells about its states: links are known at both ends
template<typename A> static void linked(const Re::Automaton<A> & a, bool optimized)
{
	typedef Re::StateBase<A> S; const S * s = a.getStartState(), * e = a.getAcceptedState(); EXPECT(s && e && s != e && a.isStartState(s) && !a.isStartState(e) && a.isAcceptedState(e) && !a.isAcceptedState(s), "ends", "start and accepted state of an automaton");
	EXPECT(s->template is<Re::StateEpsilon<A>>() && s->template as<Re::StateEpsilon<A>>() == s && !s->template is<Re::StateAny<A>>() && !s->template as<Re::StateMacro<A>>(), "ends", "type of the start state");
	std::vector<const S *> todo{s}; std::vector<const S *> seen{s}; bool reached = false; auto known = [&](const S * q) { for (const S * p : seen) if (p == q) return true; return false; };
	while (!todo.empty())
	{
		const S * q = todo.back(); todo.pop_back(); reached |= q == e; EXPECT(a.isAcceptedState(q) == (q == e) && a.isStartState(q) == (q == s), "ends", "another state passes for the start or the accepted one");
		for (S * n : q->getNextStates()) { bool back = false; for (S * p : n->getPrevStates()) back |= p == q; EXPECT(back, "links", "a state does not know the one before it"); if (!known(n)) { seen.push_back(n); todo.push_back(n); } }
		if (!optimized) for (S * p : q->getPrevStates()) { bool forth = false; for (S * n : p->getNextStates()) forth |= n == q; EXPECT(forth, "links", "a state does not know the one behind it"); }
	}
	COVN("states", seen.size()); if (reached) COV("accepted-state-reachable");
}
template<typename A> struct Text { A * p; size_t n; explicit Text(const std::string & s) : p((A *)malloc((s.size() + 1) * sizeof(A))), n(s.size()) { for (size_t i = 0; i < n; ++i) p[i] = Of<A>::in(s[i]); p[n] = 0; } ~Text() { free(p); } };
template<typename A> static void built(kv::Rng & R)
{
	const std::string alphabet = alphabets[R.below(5)]; rx::Gen g{R, alphabet, (int)R.range(2, 12)}; g.look = true; P n = g.alt((int)R.below(4)); std::string pattern; rx::print(*n, R, pattern); if (rx::weight(*n) > 400) return;
	kv::T("build /%s/", show(pattern).c_str());
	Re::Automaton<A> a; { Re::AutomatonBuilder<A> b = a.createBuilder(); assemble(b, *n); b.endGroup(); } const bool opt = R.chance(1, 2); if (opt) { a.createOptimizer().removeEpsilons(); COV("optimized"); } else COV("not-optimized");
	if (R.chance(1, 4)) linked(a, opt);
	std::string first = input(*n, alphabet, R); Text<A> * held = new Text<A>(first); Re::Executor<A> x = a.createExecutor(held->p); bool want = rx::accepts(*n, first); int yes = 0, no = 0;
	for (int i = 0; i < 10; ++i)
	{
		const bool got = runs<A>(x, held->p, held->n); EXPECT(got == want, "built", "an automaton like /%s/ (lookaheads not shown)%s %s \"%s\"", show(pattern).c_str(), opt ? ", optimized," : "", got ? "accepts" : "rejects", show(first).c_str()); (want ? yes : no)++;
		EXPECT(a.acceptString(held->p) == want, "accept-string", "acceptString and an executor disagree on \"%s\"", show(first).c_str());
		if (R.chance(1, 3)) { x.reset(); COV("executor:reset"); if (R.chance(1, 2)) { bool dummy; for (kv::u64 k = R.below(5); k && !x.step(dummy); --k); x.reset(); COV("executor:reset-midway"); } }
		else if (R.chance(1, 4)) { std::string f2 = input(*n, alphabet, R); if (f2.size() > first.size()) f2.resize(first.size()); first = f2; want = rx::accepts(*n, first); for (size_t q = 0; q < first.size(); ++q) held->p[q] = Of<A>::in(first[q]); held->p[held->n = first.size()] = 0; x.reset((const A *)held->p); COV("executor:rebind-in-place"); }
		else { first = input(*n, alphabet, R); want = rx::accepts(*n, first); Text<A> * e = new Text<A>(first); x.reset((const A *)e->p); delete held; held = e; COV("executor:rebind"); }
	}
	if (R.chance(1, 8)) copied(a, [&](const Re::Automaton<A> & c) { EXPECT(c.acceptString(held->p) == want, "copy", "a copy of an automaton and \"%s\"", show(first).c_str()); });
	delete held; if (yes && no) kv::nontrivial();
}
static void builder(kv::Rng & R) { built<char>(R); }
/// Automata over an alphabet of wide symbols
static void wide(kv::Rng & R) { built<Wide>(R); }

// ---------------------------------------------------------------- safety
static std::string malformed(kv::Rng & R)
{
	std::string p; const kv::u64 kind = R.below(8);
	if (kind < 4) { const std::string alphabet = alphabets[R.below(sizeof(alphabets) / sizeof(*alphabets))]; rx::Gen g{R, alphabet, (int)R.range(1, 16)}; P n = g.alt((int)R.below(5)); if (rx::weight(*n) < 400) rx::print(*n, R, p); }
	static const char * const T[] = { "(", ")", "[", "]", "{", "}", "|", "*", "+", "?", "^", "$", "\\", ".", "-", ",", "a", "b", "0", "1", "2", "{2}", "{1,}", "{0}", "{,2}", "{}", "{2,1}", "{a}", "[^", "[^]", "[]", "a-z", "\\]", "\\b", "\\B", "\\D", "\\W", "\\S", "\\s", "\\w", "()", "(|", "|)", "(*)", "**", "\\\\", "\\(", "[a-", "[a-\\", "{3", "\xff", "\x80-\x7f", "((", "))" };
	const int edits = kind < 2 ? 0 : kind < 4 ? 1 + (int)R.below(4) : 1 + (int)R.below(20);
	for (int i = 0; i < edits; ++i) { const char * t = T[R.below(sizeof(T) / sizeof(*T))]; const size_t at = R.chance(1, 3) ? p.size() : R.below(p.size() + 1); if (R.chance(1, 5) && at < p.size()) p.erase(at, 1 + R.below(3)); else p.insert(at, t); }
	if (kind == 7) { p.clear(); const int k = (int)R.below(24); for (int i = 0; i < k; ++i) p += (char)R.range(1, 255); COV("pattern:bytes"); }
	else COV(kind < 2 ? "pattern:well-formed" : kind < 4 ? "pattern:mutated" : "pattern:tokens");
	// repetition counts stay small, so does what they unfold to
	int digits = 0; kv::u64 counts = 0; for (char & c : p) { if (c >= '0' && c <= '9') { if (++digits > 1 && c != '0') c = 'x'; if (digits > 1) c = 'a'; } else digits = 0; if (c == '{') ++counts; }
	if (counts > 5) for (char & c : p) if (c == '{' && counts > 5) { c = 'a'; --counts; }
	return p;
}
/// Bytes behind the terminator of a string are out of bounds for the parser
struct Fence
{
	const char * p = 0; size_t n = 0;
	explicit Fence(const String & s) { 
	#if KV_ASAN
		const char * t = *s; const size_t have = malloc_usable_size((void *)t), len = s.getLength() + 1; if (have > len) { p = t + len; n = have - len; __asan_poison_memory_region(p, n); }
	#endif
	}
	~Fence() {
	#if KV_ASAN
		if (n) __asan_unpoison_memory_region(p, n);
	#endif
	}
};
static void safety(kv::Rng & R)
{
	const std::string pattern = malformed(R); kv::T("/%s/", show(pattern).c_str()); kv::state(kv::mix(std::hash<std::string>()(pattern)));
	String ps{pattern.c_str(), pattern.size()}; Re::Regex * re; { Fence f{ps}; re = new Re::Regex{ps}; }
	EXPECT(ps.getLength() == pattern.size() && !memcmp(*ps, pattern.c_str(), pattern.size() + 1), "pattern", "compiling changed the pattern /%s/", show(pattern).c_str());
	const bool printed = R.chance(1, 2); String before; if (printed) { before = re->getAutomaton().toString(); COV("printed"); }
	std::vector<std::string> ins; std::vector<bool> was;
	for (int i = 0; i < 8; ++i)
	{
		std::string s; const int k = (int)R.below(i == 7 ? 60 : 10); for (int q = 0; q < k; ++q) s += R.chance(1, 2) && !pattern.empty() ? pattern[R.below(pattern.size())] : R.chance(1, 2) ? "ab0 "[R.below(4)] : (char)R.range(1, 255); if (i == 6) s = std::string(40, 'a');
		kv::T("\"%s\"", show(s).c_str()); Exact e(s); ins.push_back(s); was.push_back(re->accept(e.p)); EXPECT(s == e.p, "input", "matching changed the input");
	}
	for (int i = 0; i < 8; ++i) { Exact e(ins[7 - i]); EXPECT(re->accept(e.p) == was[7 - i], "unstable", "/%s/ answers differently when asked about \"%s\" again", show(pattern).c_str(), show(ins[7 - i]).c_str()); }
	if (printed) EXPECT(re->getAutomaton().toString() == before, "modified", "matching changed the compiled /%s/", show(pattern).c_str());
	if (R.chance(1, 4)) copied(*re, [&](const Re::Regex & c) { EXPECT(c.accept(ins[0].c_str()) == was[0], "copy", "a copy of /%s/ answers differently", show(pattern).c_str()); });
	delete re; { Re::Regex again{ps}; for (int i = 0; i < 8; i += 3) { Exact e(ins[i]); EXPECT(again.accept(e.p) == was[i], "differs", "/%s/ compiled again answers differently about \"%s\"", show(pattern).c_str(), show(ins[i]).c_str()); } }
	kv::nontrivial();
}
/// Sizes far from the usual: deep nesting, long patterns and inputs, loops over what matches nothing
static void stress(kv::Rng & R)
{
	std::string p, in; bool want = true; const int k = (int)R.below(8);
	switch (k)
	{
		case 0: { const int d = (int)R.range(1, 400); p = std::string(d, '(') + "ab" + std::string(d, ')'); if (R.chance(1, 2)) { p += '+'; in = "abab"; } else in = "ab"; COV("stress:nested"); break; }
		case 1: { const int d = (int)R.range(1, 200); p = std::string(d, '(') + "a*"; for (int i = 0; i < d; ++i) p += ")*"; p += R.chance(1, 2) ? "c" : "a"; want = p.back() == 'a'; in = std::string(40, 'a'); COV("stress:nested-star"); break; }
		case 2: { const int d = (int)R.range(1, 24); for (int i = 0; i < d; ++i) p += "a?"; for (int i = 0; i < d; ++i) p += 'a'; in = std::string(d, 'a'); COV("stress:optional"); break; }
		case 3: { const int d = (int)R.range(1, 400); for (int i = 0; i < d; ++i) { p += (char)('a' + i % 26); p += '|'; } p += "zz"; p = "(" + p + ")+"; for (int i = 0; i < 12; ++i) { if (R.chance(1, 3)) in += "zz"; else in += (char)('a' + R.below(d < 26 ? d : 26)); } COV("stress:branches"); break; }
		case 4: { const int d = (int)R.range(1, 3000); p = "(ab|c)*"; for (int i = 0; i < d; ++i) in += R.chance(1, 2) ? "ab" : "c"; if (R.chance(1, 2)) { in += 'a'; want = false; } COV("stress:long-input"); break; }
		case 5: { const int d = (int)R.range(1, 120); p = std::string(d, '('); p += "[^b]"; for (int i = 0; i < d; ++i) p += R.chance(1, 2) ? "|)?" : ")"; in = "a"; COV("stress:nested-class"); break; }
		case 6: { p = "(a|b|ab|ba|()|a*)*$"; for (int i = 0; i < 60; ++i) in += R.chance(1, 2) ? 'a' : 'b'; if (R.chance(1, 2)) { in += 'c'; want = false; } COV("stress:ambiguous"); break; }
		default: { const int a = (int)R.range(1, 60), b = a + (int)R.range(0, 60); p = "(a|b){" + std::to_string(a) + "," + std::to_string(b) + "}"; const int n = (int)R.range(0, 130); want = n >= a && n <= b; for (int i = 0; i < n; ++i) in += R.chance(1, 2) ? 'a' : 'b'; COV("stress:counted"); break; }
	}
	kv::T("/%s/ \"%s\"", p.c_str(), in.c_str()); String ps{p.c_str(), p.size()}; Re::Regex re{ps}; for (int i = 0; i < 2; ++i) { Exact e(in); EXPECT(re.accept(e.p) == want, "stress", "/%.300s/ %s \"%.300s\"", p.c_str(), want ? "rejects" : "accepts", in.c_str()); }
	kv::nontrivial();
}
/// Inputs beyond 2^16 characters under patterns whose answer is known
static void lengthy(kv::Rng & R)
{
	const size_t n = R.chance(1, 3) ? 65530 + R.below(12) : 32000 + R.below(110000); std::string p, in; bool want = true; const int k = (int)R.below(7);
	auto fill = [&](const char * abc, size_t c) { const size_t m = strlen(abc); std::string o; o.reserve(c); for (size_t i = 0; i < c; ++i) o += abc[R.below(m)]; return o; };
	switch (k)
	{
		case 0: p = "(ab)*"; for (size_t i = 0; i < n / 2; ++i) in += "ab"; if (R.chance(1, 2)) { in += 'a'; want = false; } break;
		case 1: p = "a*b"; in = std::string(n, 'a'); if (R.chance(1, 2)) in += 'b'; else want = false; break;
		case 2: p = "\\w+"; in = fill("abz09_Z", n); if (R.chance(1, 2)) { in[n - 1 - R.below(50)] = '-'; want = false; } break;
		case 3: p = "[^x]*x"; in = fill("abcd ", n); in += 'x'; if (R.chance(1, 2)) { in += 'x'; want = false; } break;
		case 4: p = "^(a|b|cc)+$"; for (size_t i = 0; in.size() < n; ++i) { const int q = (int)R.below(3); in += q == 0 ? "a" : q == 1 ? "b" : "cc"; } if (R.chance(1, 2)) { in += 'c'; want = false; } break;
		case 5: p = "(\\w+ )*\\w+\\b"; while (in.size() < n) { in += fill("abc", 1 + R.below(9)); in += ' '; } in += 'a'; if (R.chance(1, 2)) { in += ' '; want = false; } break;
		default: p = ".*"; in = fill("ab\n\t.x", n); break;
	}
	kv::T("/%s/ on %zu characters, expected %d", p.c_str(), in.size(), want); if (in.size() > 65536) COV("input:beyond-64K"); kv::nontrivial(); kv::state(k * 2 + want);
	Re::Regex re{String{p.c_str()}}; Exact e(in); EXPECT(re.accept(e.p) == want, "lengthy", "/%s/ %s an input of %zu characters", p.c_str(), want ? "rejects" : "accepts", in.size());
	if (R.chance(1, 2)) EXPECT(re.accept(String{e.p}) == want, "lengthy", "/%s/ %s a string of %zu characters", p.c_str(), want ? "rejects" : "accepts", in.size());
}
KV_MAIN({"lengthy", lengthy, true}, {"language", language, true}, {"large", large, true}, {"exhaustive", exhaustive, true}, {"realistic", realistic, true}, {"builder", builder, true}, {"wide", wide, true}, {"safety", safety, true}, {"stress", stress, true})
